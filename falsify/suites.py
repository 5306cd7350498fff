import s_time, s_sched, s_graph, s_conds  # noqa

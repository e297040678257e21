import c_trx, c_mib, c_fml, c_buf, c_stored, c_expr, c_queue, c_client, c_svc, c_tx, c_life, c_conf, c_tables, c_ulog, c_conv, c_views, c_built
CHECKS = {"T04": c_trx.t04, "M01": c_mib.m01, "F01": c_fml.f01, "F02": c_fml.f02, "B01": c_buf.b01,
          "F03": c_stored.f03, "E01": c_expr.e01,
          "Q01": c_queue.q01, "C01": c_client.c01, "C02": c_client.c02, "C03": c_client.c03,
          "S01": c_svc.s01, "S02": c_svc.s02, "T01": c_tx.t01, "T02": c_tx.t02, "T03": c_tx.t03, "L01": c_life.l01, "A01": c_life.a01, "M02": c_life.m02, "U01": c_conf.u01, "N01": c_tables.n01, "G01": c_ulog.g01, "F04": c_conv.f04, "V01": c_views.v01, "K01": c_built.k01}

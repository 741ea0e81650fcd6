import core_checks, hist_checks, conf_checks, omp_checks, cli_checks, thr_checks, detect_checks, alloc_checks, big_checks, table_checks, export_checks, abi_checks, cost_checks, pkg_checks, ub_checks, accel_checks

MODULES = [core_checks, hist_checks, conf_checks, omp_checks, cli_checks, thr_checks, detect_checks, alloc_checks, big_checks, table_checks, export_checks, abi_checks, cost_checks, pkg_checks, ub_checks, accel_checks]
VARIANTS = [core_checks.std_variants, hist_checks.hist_variants, omp_checks.omp_variants, cli_checks.cli_variants, cli_checks.fault_variants, thr_checks.thr_variants, alloc_checks.alloc_variants, big_checks.big_variants, abi_checks.abi_variants, cost_checks.cost_variants, ub_checks.ub_variants, ub_checks.ub_cli_variants, accel_checks.accel_variants, accel_checks.omp_variants]
CHECKS, REPLAYERS, INFO = {}, {}, {}
for m in MODULES:
    CHECKS.update(m.CHECKS)
    REPLAYERS.update(getattr(m, 'REPLAYERS', {}))
    INFO.update(m.INFO)


def replay(d):
    return REPLAYERS[d['kind']](d)


def setup():
    """Shows that the tools are there and the framework compiles."""
    import build
    v = build.std_variants(['gcc'])
    build.build_harness(v, core_checks.SRC, 'core')
    print('setup: the harness builds')
    return 0

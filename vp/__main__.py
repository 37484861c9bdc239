import sys, os
from . import checks, run, build
def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        build.engine(); build.repo_ir(); build.native_lib()
        if "--all" in a:
            from concurrent.futures import ThreadPoolExecutor
            seen = {}
            for pid, (f, _) in checks.CHECKS.items():
                for j in f("quick"): seen.setdefault((j.h, tuple(j.extra), j.fake, tuple(j.defs)), j)
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda j: (build.harness_ir(j.h, j.extra, j.fake, j.defs, j.incs), build.harness_native(j.h, j.extra, j.fake, j.defs, j.incs)), seen.values()))
        return 0
    pid = a[0]; tier = a[1] if len(a) > 1 else "quick"
    f, asm = checks.CHECKS[pid]
    jobs = f(tier)
    if len(a) > 2: jobs = [j for j in jobs if any(x in j.name for x in a[2:])]
    return run.check(pid, jobs, tier, assumptions=asm)
sys.exit(main())

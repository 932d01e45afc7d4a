#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of /verif/properties.jsonl on /repo's working tree"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vt
import registry


def setup():
    """compile the executors once and check that the tools are there"""
    import subprocess, concurrent.futures, checks_cache, checks_alloc, checks_dict, checks_misc, server
    subprocess.run(["java", "-version"], check=True, capture_output=True)
    jobs = [(f, m) for m in ("release", "debug", "asan") for f in (checks_cache.exec_cache, checks_alloc.exec_alloc, checks_dict.exec_dict, server.daemon_binary, checks_misc.exec_conf, checks_misc.exec_iobuf)]
    jobs += [(checks_misc.exec_conv, "release"), (checks_misc.exec_conv, "asan")]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda j: j[0](j[1]), jobs))
    checks_cache.exec_capi()
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = vt.Check(prop, tier, seed)
    try:
        registry.CHECKS[prop](chk)
    except vt.CheckError as e:
        vt.log("ERROR of the check itself:", e)
        if not chk.viol:
            return 2
    except Exception:
        traceback.print_exc()
        if not chk.viol:
            return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())

import importlib, shutil, sys, traceback
import common

def main():
    pid, tier, seed = sys.argv[1], sys.argv[2], sys.argv[3]
    chk = common.Check(pid, tier, seed)
    try:
        mod = importlib.import_module("c_" + pid.lower())
        mod.run(chk)
        rc = chk.finish()
    except common.Machinery as e:
        if chk.viol:      # violations already established count
            rc = chk.finish()
        else:
            print("MACHINERY:", e)
            rc = 2
    except BaseException:
        traceback.print_exc()
        rc = chk.finish() if chk.viol else 2
    finally:
        shutil.rmtree(chk.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == "__main__":
    main()

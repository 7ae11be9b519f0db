import faulthandler, sys, runpy
n = int(sys.argv[1]); faulthandler.dump_traceback_later(n, exit=True)
sys.argv = ["tools/prove.py"] + sys.argv[2:]
runpy.run_path("/verif/tools/prove.py", run_name="__main__")

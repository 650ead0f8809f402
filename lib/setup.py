"""setup_cmd: builds the drivers once so that the checks start warm."""
import sys
import vlib, otherchecks, pyext, mlirbuild, convext, progchecks, runner
try:
    vlib.build_ops_driver()
    vlib.build_ops_driver(sanitize=True)
    runner.a64_driver()
    runner.a64_driver(sanitize=True)
    otherchecks.build_setbatch()
    pyext.build()
    mlirbuild.build()
    convext.build()
    progchecks.build()
except vlib.CheckError as e:
    print(e)
    sys.exit(1)

import runpy,sys
def main(tier,args):
    sys.argv=args
    runpy.run_path(args[0],run_name="__main__")
    return 0

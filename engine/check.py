"""check ID: decides one property on /repo's current tree"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def codec(prop):
    import gocodec, gocheck
    txt, _ = gocodec.generated([prop])
    return gocheck.run(prop, 'codec', gocodec.table()[prop], {'codec/zz_gen.go': txt}, gocodec.BOUNDS)


def rust(prop):
    import rstab, rscheck
    return rscheck.run(prop, rstab.table(prop), rstab.bounds(prop))


def typescript(prop):
    import tstab, tscheck
    return tscheck.run(prop, tstab.table(prop), tstab.bounds(prop))


def main():
    p = sys.argv[1]
    if p in ('C%02d' % i for i in range(1, 10)):
        sys.exit(codec(p))
    if p in ('C%02d' % i for i in range(10, 18)):
        sys.exit(rust(p))
    if p in ('C%02d' % i for i in range(18, 22)) or p == 'C27':
        sys.exit(typescript(p))
    if p in ('C22', 'C23', 'C24'):
        import gengo
        sys.exit(gengo.run(p))
    if p == 'C25':
        import gonames
        sys.exit(gonames.run(p))
    if p == 'C28':
        import rsgen
        sys.exit(rsgen.run(p))
    print('unknown property', p)
    sys.exit(2)


main()

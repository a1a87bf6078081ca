"""
Run a share of the cases of one property. Progress goes to stdout (one index
per line, written before the case starts), the report to a file.
"""
import importlib
import json
import os
import sys
import time
import warnings


def main(argv):
    spec = json.loads(argv[0])
    sys.path.insert(0, spec['root'])
    from harness import core
    # The progress pipe must not be polluted by what the workload prints.
    progress = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    core.import_jsons()
    module = importlib.import_module('harness.props.' + spec['pid'].lower())
    ctx = core.Ctx(spec['pid'], spec['seed'], spec['tier'])
    cover = core.LineCoverage()
    use_cover = getattr(module, 'COVERAGE', True)
    if use_cover:
        cover.start()
    start = time.monotonic()
    found = []
    done = 0
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for index in range(spec['first'], spec['stop'], spec['step']):
            if time.monotonic() - start > spec['seconds'] and done:
                break
            progress.write('%d\n' % index)
            violation = core.run_case(module, ctx, index)
            done += 1
            if done % 200 == 0:
                core.forget_generated_classes()
                if core.rss_mb() > 2500:
                    break
            if violation:
                found.append(violation)
                if len(found) >= 3:
                    break
    report = {
        'cases': done,
        'counters': dict(ctx.counters),
        'seen': sorted(ctx.seen),
        'samples': ctx.samples,
        'violations': found,
        'lines': cover.stop() if use_cover else {},
        'seconds': time.monotonic() - start,
    }
    with open(spec['report'] + '.tmp', 'w') as f:
        json.dump(report, f)
    os.replace(spec['report'] + '.tmp', spec['report'])
    progress.write('done\n')
    progress.flush()
    # Do not wait for threads or processes that the workload may have leaked.
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1:])

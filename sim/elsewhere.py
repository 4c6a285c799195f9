"""A simulator in an interpreter of its own (another hash seed, another environment): runs the commands it is told on stdin."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import driver
    driver.prepare()
    import kernel
    ctl = kernel.Ctl()
    job = json.load(sys.stdin)
    out = []
    for args in job['commands']:
        r = kernel.run(kernel.Spec(kernel.run_cli(args), job['root'], job['err'], rand=job['rand']), ctl)
        out.append(dict(outcome=r.outcome(), stderr=r.stderr[-500:], digest=ctl.digest(), nops=r.nops))
        if r.outcome() != 'ok':
            break
    print('RESULT ' + json.dumps(out))


if __name__ == '__main__':
    main()

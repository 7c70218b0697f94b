import sys
from ..vc import Job, report
from ..core import Program


def main(pid, run):
    sys.setrecursionlimit(20000)
    job = Job(pid, Program(sys.argv[1] if len(sys.argv) > 1 else '/tmp/ast.json'))
    run(job)
    report(job)

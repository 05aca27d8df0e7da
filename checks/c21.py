"""C21: files and datasets supplied by the caller are handed back as they were."""
from handles import drive

MODEL = '''SPECIFICATION Spec
INVARIANTS NothingLeftOpen OnlyOwnFiles OnlyUsable
PROPERTIES CallerOwnsPool Returns
CHECK_DEADLOCK FALSE
CONSTANT MaxSteps = {}
CONSTANT ModelOps = {}
CONSTANT ModelKinds = {}
'''


def main(c):
    c.model('Handles', MODEL.format(2 if c.quick else 3, '{"ortho", "write-int"}', '{"path", "openfile", "dataset", "dataset-w", "openfile-rb", "fileobj", "fileobj-rt"}'))
    cases = c.generate('C21Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C21Trace', runs, cfg='CONSTANT Failing <- C21Failing')
    c.evaluations = sum(len(r['obs'].get('steps', [])) for r in runs)
    c.nontrivial = set(range(c.evaluations))
    c.rule = 'calls of Handles.tla: each operation with each kind of handle in each role, open and closed, with each fault; random histories over a shared pool of handles'
    c.level = 'model_checking'
    c.assumptions = ['the caller rewinds file objects between calls', 'local files']

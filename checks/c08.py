"""C08: no existing file is replaced or created unless the call asked for and can do it."""
from files import drive


def main(c):
    n = 2 if c.quick else 3
    c.model('Files', f'SPECIFICATION Spec\nPROPERTY Kept\nCONSTANT MaxSteps = {n}\nCHECK_DEADLOCK FALSE')
    cases = c.generate('C08Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C08Trace', runs, cfg='CONSTANT Failing <- C08Failing')
    n = sum(len(r['obs'].get('steps', [])) for r in runs)
    c.evaluations = n
    c.nontrivial = set(range(n))
    c.rule = 'histories of Files.tla: every kind of call with every fault over missing, foreign and own files, with and without overwriting; random histories'
    c.level = 'model_checking'
    c.assumptions = ['files on a local file system', 'nobody else changes the files during a call']

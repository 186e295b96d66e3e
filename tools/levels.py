NOT_APPLICABLE = {}
DEFAULT = ('exploration', 'executable contract checked on generated inputs (bounded stand-in)', 'bounded stand-in; the contracts of this property are not discharged deductively yet')
TECH = ('contract-based deductive verification of the functions in /repo (pyv: symbolic execution of their current source with contracts, loop havoc and '
        'induction over the tree; obligations decided by z3 and an automata library); a bounded executable specification of the property searches the failing input')
NOTE_PROOF = 'see evidence: functions_under_contract, trusted_base and assumptions'
LEVELS = {i: ('proof', TECH, NOTE_PROOF) for i in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20')}

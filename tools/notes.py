MODEL = ('TLC enumerates every behaviour of the specification within the stated bounds and seeded longer ones, and checks the '
         'specification\'s own invariants on them; each behaviour is then run on the code built from /repo and compared. ')
TRUST = 'Trusted: the specification and the projection of the AST in harness/; beyond the bounds, sampling.'
LEX = MODEL + 'The specification is a character-level transition system of the tokenizer. ' + TRUST
SQLN = MODEL + 'The specification is a translation grammar (derivation system and an independent backtracking recogniser checked against each other). ' + TRUST
for p in ('C01', 'C02', 'C03'):
    NOTES[p] = LEX
for p in ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C18', 'C19'):
    NOTES[p] = SQLN

TRACE = ('TLC checks the invariants of the specification and judges traces recorded from the code built from /repo, event by event, '
         'against it; the inputs are the derivations of the grammar specification. ')
for p in ('C13', 'C14', 'C15', 'C17', 'C23'):
    NOTES[p] = TRACE + TRUST
    TECHS[p] = 'TLA+ specification model checked with TLC; traces recorded from the Go code validated against it by TLC'
NOTES['C16'] = MODEL + 'Edit scripts on lists are enumerated by TLC with the lists they lead to; edits of whole trees are recorded and judged by TLC. ' + TRUST
TECHS['C16'] = 'TLA+ specification model checked with TLC; its edit scripts replayed into the Go code, and recorded traces validated by TLC'
NOTES['C12'] = MODEL + 'Every pattern of comments between two tokens is a behaviour of the specification. ' + TRUST
NOTES['C20'] = ('TLC enumerates every interleaving of the segments of several actors (reads of the source, writes of the printer, visits of a walk) and checks that '
                'each ends with its own result; a scheduler drives the real code through each of them. The order of runs in a process and the race detector '
                'cover the state that segments cannot show. ' + TRUST)
NOTES['C21'] = MODEL + 'Deliveries of a source (splits, empty reads, data with end of file, failures) are behaviours of the specification. ' + TRUST
TECHS['C20'] = 'TLA+ specification model checked with TLC; its interleavings scheduled onto the Go code and compared'
NOTES['C22'] = MODEL + ('The specification is the command as a state machine over its inputs; the texts are derivations, edits judged by the recogniser and '
                        'texts that the tokenizer rejects, given to the built command. ') + TRUST
NOTES['C04'] = MODEL + ('The texts are the behaviours of the tokenizer and grammar specifications, edits and cuts of them and token sequences after viable beginnings; '
                        'repetition and nesting are the self-embeddings of the grammar specification (SqlPump.tla), each pumped up to 64 KiB. '
                        'The oracle is the absence of panics, hangs and runaway memory. ') + TRUST

NOTES['C24'] = MODEL + 'Invocations and histories of them are behaviours of the specification; the files are judged by the type checker of Go. ' + TRUST
NOTES['C25'] = MODEL + 'Histories of changes to two copies of an AST are behaviours of the specification, laid over sampled places of derived ASTs. ' + TRUST
NOTES['C26'] = MODEL + 'Texts and calls are behaviours of the specification, in which the recogniser moves from where it stopped. ' + TRUST

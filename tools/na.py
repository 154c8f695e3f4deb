NA = {
 'C30': 'Quantifies over the composition of three jobs on arbitrary contents and rests on the collision resistance of the strong sum; no sound static argument bounds that. Its decidable parts are C06, C07, C08, C10, C12, C13.',
 'C31': 'A statement about how much output a search heuristic produces for given contents, with hash-dependent control flow; static analysis cannot bound it.',
}

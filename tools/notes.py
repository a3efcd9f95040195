HOOKS = ['d8c0e74e34183ac046a60fd2c8825867c3a69101', 'c03987caa9b9af3c4ff0d27a87f34369f40c62c3']
B = 'Within the bounds the evidence file states, every case runs on the real code; beyond them nothing is claimed. Trusts the reference model in the harness, rustc and the guarding allocator. '
NOTE.update({
 'R01': B + 'The behaviour of a table depends on its entry lengths only, which the bounds cover in all small combinations; 32-bit offset overflow is not reached.',
 'R02': B + 'Grouping is checked for every order of a few keys and for long patterned inputs, where the standard sort changes algorithm.',
 'V01': B + 'Presence bits sit in 32-bit blocks: all short patterns, and patterned lengths across block boundaries.',
 'V02': B + 'Double drops, uses after drop, uses of slots that were never written and leaks are observed through recording items and a guarding allocator; one injected panic per history.',
 'V03': B + 'Equality, order and hash are compared with those of the plain sequence of options; each operand is built with several different pasts.',
 'V04': B + 'All short presence patterns and patterned long ones.',
 'Q01': B + 'Only the order of the item type matters to the queue: all short histories over a few ranks and all orders of up to nine distinct ranks.',
})

G = B + 'Graphs are explored in full up to 5 vertices and by edge count up to 8; larger ones come from patterned families with permuted numberings. '
NOTE.update({'G01': G, 'G02': G, 'G03': G, 'G04': G + 'Every valid layering in few layers is tried, not only the computed one.', 'G05': G + 'Sequences of joins between separately started groups are explored on their own.', 'G06': G, 'G07': G + 'Counts are taken across the 16-bit limit.', 'G08': G + 'Of an endless traversal the first items are compared.', 'G09': G + 'Builder calls are explored as histories.', 'G10': G + 'Weights come from small sets that give ties and zero weights.'})
T.update({'G09': HIST})
L = B + 'Texts are explored in full over small alphabets that contain one character of each class the language distinguishes, and every Unicode scalar in a few contexts. '
NOTE.update({'L01': L, 'L02': L, 'L03': L + 'Decimals of more than 15 digits rely on std as the reference for correct rounding.'})

A = B + 'Coordinates are integers, halves or quarters under nine exact similarities, so that the oracle decides every question in integer arithmetic; general doubles and near-degenerate positions are not reached. '
NOTE.update({
 'P01': A,
 'P02': A + 'Query points lie on grids around the obstacles.',
 'P03': A + 'Lengths are compared to 1e-9.',
 'P04': B + 'Every small weight matrix over a few weights; larger ones follow patterns.',
 'P05': A + 'Lengths are compared to 1e-9.',
 'P06': B + 'Curves are compared with barriers by sampling each segment at 200 parameters, so a grazing double crossing between two samples is not seen; it is an under-approximation, not an alarm.',
 'P07': B + 'Roots are compared within tolerances by multiplicity; a double root may be missed where rounding affects the discriminant.',
 'P08': A + 'Reaches the private triangulation through a hook.',
 'P09': A,
})
C = B + 'Numerical results are compared within stated tolerances. '
NOTE.update({'C01': C, 'C02': C + 'Reaches the private colour conversions through a hook.', 'C03': C + 'Doubles come from enumerated tables: multiples of 1/8, 1/10 and 1/7, and the neighbours of every 2^i + 1/2.', 'C04': C})

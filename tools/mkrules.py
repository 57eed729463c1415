import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'distinct = different sequence of generator choices; non-trivial = '
R = {
 'P01': D + 'every generated sensor/point pair (all are compared with the formula)',
 'P02': D + 'the distortion parameter set is not the neutral one (or the sensor is shifted)',
 'P03': D + 'at least one medium refracts (or, in the single-medium check, every case)',
 'P04': D + 'at least one medium refracts (single line-plane checks: the line is not parallel to the plane)',
 'P05': D + 'a table was built and points inside it compared / a volume whose corners were traced',
 'P06': D + 'at least two cameras see the point / the lines are not parallel / noise is present',
 'P07': D + 'at least one medium refracts and the ray crosses the volume depth range',
 'P08': D + 'at least one target definitely qualifies as a candidate',
 'P09': D + 'at least one match was reported / more than two elements sorted',
 'P10': D + 'the model finds at least one target (more than one for neighbouring spots)',
 'P11': D + 'the image has interior pixels and, where a span is used, the span is not zero',
 'P12': D + 'the file holds at least one target (damage: the damage changes what a reader may accept)',
 'P13': D + 'the frame holds at least one particle (damage: the file is really damaged)',
 'P14': D + 'the history shifts the ring or adds candidates at least once',
 'P15': D + 'the angles are not all zero / the files are really damaged',
 'P16': D + 'the file is damaged in one place or read back with all its fields compared',
 'P17': D + 'one field was changed by the generator (the unchanged copy is compared in the same case)',
 'P18': D + 'a scene with enough well-spread points was oriented (degenerate: any deliberately insufficient scene)',
 'P19': D + 'a scene with points in general position was oriented (degenerate: any deliberately insufficient scene)',
 'P20': D + 'at least one detection lies within the search window of a point',
 'P22': D + 'at least one link was made (backward: a link was added to those of the forward run)',
 'P23': D + 'at least one link / added particle was compared with the reference',
 'P24': D + 'the window projects from all corners / a target lies in the window / a candidate is seen by two cameras / any motion compared / more than one value sorted',
 'P21': D + 'the storage is padded, a matrix has more than one column/row, or a vector pair was compared',
 'P25': D + 'the call has at least one point/target/image/step whose result is compared',
 'P27': D + 'the text of at least one file differs from the well-formed text it was made from',
 'P28': D + 'at least one particle can be reconstructed (is seen by two cameras, or by all when full sets are asked for)',
 'P29': D + 'at least one operation was measured over repeated runs',
 'P30': D + 'at least one result was compared with that of a repetition',
 'P31': D + 'the repeated history itself is non-trivial by the rule of the check it is taken from (P25, P26)',
 'P26': D + 'the history makes at least one call on an object it created before',
}
json.dump(R, open(V + '/rules.json', 'w'), indent=1)

T = 'sanitizers on; trusts compiler, libm and the oracle code in /verif/props; sampled inputs, no exhaustiveness'
NOTES = {
 'P01': ('property-based testing: closed-form oracle and round trips over generated sensors and points', 'Random sensors, field modes and points; ' + T),
 'P02': ('property-based testing: extended-precision distortion model and inverse round trip', 'Random distortion sets kept in the invertible range; ' + T),
 'P03': ('property-based testing: independent bisection ray solver and rigid-motion metamorphic relation', 'Random rigs in four glass families; ' + T),
 'P04': ('property-based testing: Snell residuals and forward/backward consistency', 'Random rigs and image points; ' + T),
 'P05': ('property-based testing: differential table vs direct computation', 'Random rigs and volumes; first table ring is a known finding; ' + T),
 'P06': ('property-based testing: skew-line model and recovery of known points', 'Random rigs, visibility masks and noise; ' + T),
 'P07': ('property-based testing: epipolar segment end points against ray-traced bounds', 'Random camera pairs and tilted volumes; ' + T),
 'P08': ('property-based testing: differential against exhaustive search', 'Random sorted target lists and segments; ' + T),
 'P09': ('property-based testing: validity/exclusivity/maximality predicates on generated scenes and adjacency lists', 'Random scenes and raw candidate lists; ' + T),
 'P10': ('property-based testing: flood-fill reference model on generated images', 'Random images (noise, spots, plateaus); ' + T),
 'P11': ('property-based testing: naive filter models on generated images', 'Random images, spans, kernels, filter files; ' + T),
 'P12': ('property-based testing: write/read round trips, structural file damage with a token-level oracle, injected write failures', 'Random target lists, file damage and disk-full streams; ' + T),
 'P13': ('property-based testing: write/read round trips, structural file damage with a token-level oracle', 'Random frames, file damage, long names; empty frames are a known finding; ' + T),
 'P14': ('property-based testing: model-based operation sequences on the frame ring', 'Random operation histories against a vector-of-frames model; ' + T),
 'P15': ('property-based testing: round trips, matrix invariants and injected file faults', 'Random cameras and file damage; ' + T),
 'P16': ('property-based testing: generated parameter files with a reading model and structural damage', 'Random parameter files of all ten kinds, damaged at random places; ' + T),
 'P17': ('property-based testing: metamorphic relation (copy is equal, one changed field is not)', 'Random records, every compared field; ' + T),
 'P18': ('property-based testing: recovery of generated cameras from exact and noisy detections, least-squares optimality, metamorphic exclusion of unused points', 'Random cameras, points, flags and starts; with refraction a rare stall (ray tracing granularity) is tolerated for one scene of three; ' + T),
 'P19': ('property-based testing: recovery of generated poses from a few points', 'Random cameras, points and starts; a rare stall with refraction is tolerated for one scene of three; ' + T),
 'P20': ('property-based testing: differential against exhaustive search with a reference camera', 'Random cameras, points, detections and radii; ' + T),
 'P21': ('property-based testing: algebraic definitions in extended precision over all sizes and paddings', 'Random matrices (well conditioned) and vectors; ' + T),
 'P22': ('property-based testing: invariants over generated tracking histories (links mutual and exclusive, nothing given is altered), memory/disk differential', 'Random scenes of up to 16 particles over 3-6 frames with clutter and missing frames; ' + T),
 'P23': ('property-based testing: independent reference tracker, recovery of generated paths and of particles removed from them', 'Random scenes of up to 16 particles over 3-8 frames; the last link of a sequence is a known finding; ' + T),
 'P25': ('property-based testing: differential against the C library on the same values, records set and read back, over generated arguments, layouts and histories', 'Bindings built with sanitizers from the current tree; random rigs, arrays, files and attribute histories; ' + T),
 'P26': ('stateful property-based fuzzing of the Python interface under AddressSanitizer, with generated impossible requests that must raise', 'Random histories over all classes and functions, lifetimes, broken files; documented argument types only (None in place of an object and wrong element types are not generated); ' + T),
 'P27': ('structured mutation fuzzing of file contents under AddressSanitizer and UBSan, against a count of what the text holds and marked memory', 'Texts of every file kind mutated at the levels of bytes, values, counts and lines, and random bytes; target and frame files are read with the capacity-limited readers (the plain ones only where the file fits the buffer); ' + T),
 'P28': ('property-based testing: end-to-end reconstruction of generated scenes rendered by a reference camera', 'Random rigs of 2-4 cameras, media, half fields, spots, noise, up to 25 particles that stay clear of each other in all images and along all epipolar lines, and up to 6 paths over 4-6 frames; ' + T),
 'P29': ('property-based testing: generated operations repeated on the same inputs, invariant over the allocated bytes and open files', 'The operations of all modules on random, damaged and failing inputs, each repeated four times; memory is read from the sanitizer allocator; ' + T),
 'P30': ('property-based testing: metamorphic repetition of generated operations, bitwise, with other operations in between and different rubbish in heap and stack memory', 'Random histories of up to three levels of operations; memory the library gets from malloc and realloc is filled with one of seven values; ' + T),
 'P31': ('stateful property-based testing: generated histories of the Python interface repeated, invariant over the allocated bytes and open files', 'The histories of P25 and P26, each repeated up to 30 times until memory stops growing; ' + T),
 'P24': ('property-based testing: exhaustive search, definitions in extended precision, decision tables', 'Random target lists, windows, rigs and motions; ' + T),
}

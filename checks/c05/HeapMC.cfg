SPECIFICATION Spec
CONSTANTS MaxSeg = 2 Pad = 0 Size = 24 Ids = {1, 2, 3}
INVARIANTS Disjoint ChunksFree ChunksNeeded
PROPERTY NoGrowth
CHECK_DEADLOCK FALSE

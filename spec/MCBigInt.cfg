SPECIFICATION Spec
INVARIANTS WellFormedResults AddCommutes SubUndoes MulDistributes MulCommutes OrderBySign DivBack
CHECK_DEADLOCK FALSE

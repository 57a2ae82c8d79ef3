SPECIFICATION Spec
INVARIANTS Antisymmetric EqualOnlySame Total Transitive DirBeforeItsFiles FilesBeforeSubdirs ParentBeforeAll SiblingsBytewise
CHECK_DEADLOCK FALSE

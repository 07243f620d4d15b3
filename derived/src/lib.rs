//! Builds what the definitions generated by C23 are compiled against.

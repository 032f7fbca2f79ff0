------------------------------ MODULE MCFilter ------------------------------
EXTENDS Filters
S2 == {"a", "b"}
A == {"a"}
S3 == {"a", "b", "c"}
=============================================================================

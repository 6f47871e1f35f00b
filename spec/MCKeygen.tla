------------------------------ MODULE MCKeygen ------------------------------
EXTENDS KeygenSM
=============================================================================

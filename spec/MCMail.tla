------------------------------- MODULE MCMail ------------------------------
EXTENDS SDMail
=============================================================================

------------------------------ MODULE MCSaving ------------------------------
EXTENDS Saving, TLC
=============================================================================

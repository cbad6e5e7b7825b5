------------------------------- MODULE PoolMC -------------------------------
EXTENDS Pool
MCLevel(x) == 1 + (x % 2)
MCFailed(x) == x = 3
=============================================================================

------------------------------- MODULE StreamMC -------------------------------
EXTENDS Stream
MCMsgs == <<(<<1, 2, 3>>), (<<>>), (<<4, 5>>)>>
===============================================================================

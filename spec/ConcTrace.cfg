CONSTANTS B = 16
 Sharing = FALSE
INIT ConcInit
NEXT ConcNext

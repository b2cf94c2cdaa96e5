SPECIFICATION Spec
CONSTANTS NN = 4 Ids = {1, 2}
INVARIANTS ExactlyOnce OnlySent Complete NoStuck EveryBcastEverywhere
PROPERTY AllDelivered
CHECK_DEADLOCK FALSE

CONSTANTS TXD = 2 RXD = 2 MAXN = 3
SPECIFICATION Spec
INVARIANTS TxOrder RxOrder Bounded LevelRx
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Keys = {1,2}
  MaxOps = 4
  OpKinds = {"ins","get","rem","sync","adv","ia","iif","cmp"}
  MCfgs = {"lru1","lru2w","lfu2w","zero","ttl","ttltti","exp","expttl","inval","invalttl","seg2"}
  Weights = {0,2,4}
  Classes = {1}
  Colours = {0}
  Steps = {1,20}
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Threads = {t1, t2} MaxMsgs = 4 PoolMax = 2 MaxObj = 4 Rules = "ok"
INVARIANTS NoError Bounded Distinct NotShared HeldIsOut NothingLeaks
PROPERTY Ends

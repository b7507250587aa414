SPECIFICATION Spec
INVARIANTS OneAtATime TakenShown DialogsIdle
PROPERTY Reusable

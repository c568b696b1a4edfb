SPECIFICATION Spec
CONSTANT Props = {"C01","C02","C03","C04","C05","C06"}
CONSTRAINT Note
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Calls = {}
MaxLen = 0

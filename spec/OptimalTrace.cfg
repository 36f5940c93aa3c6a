SPECIFICATION TSpec
POSTCONDITION Consumed

SPECIFICATION Spec
CONSTANTS Arcs = 2
          Workers = 2
INVARIANTS SameAsSerial OnceEach Emit

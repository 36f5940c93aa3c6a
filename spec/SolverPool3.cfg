SPECIFICATION Spec
CONSTANTS Arcs = 3
          Workers = 3
INVARIANTS SameAsSerial OnceEach Emit

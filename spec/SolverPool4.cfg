SPECIFICATION Spec
CONSTANTS Arcs = 4
          Workers = 4
INVARIANTS SameAsSerial OnceEach Emit

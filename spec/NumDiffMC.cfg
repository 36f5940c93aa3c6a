SPECIFICATION Spec
CONSTANTS PtsMax = 4
 Lo = 2
 Hi = 8
 OrdMax = 3
 Every = 23
 EveryG = 17
INVARIANTS Formulas Sides Leibniz Widths Emit

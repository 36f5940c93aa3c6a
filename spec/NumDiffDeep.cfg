SPECIFICATION Spec
CONSTANTS PtsMax = 5
 Lo = 2
 Hi = 8
 OrdMax = 3
 Every = 3
 EveryG = 5
INVARIANTS Formulas Sides Leibniz Widths Emit

DEFNOTE = ("Value graphs of the compiled IR equal to the reference for all byte values of every analysed length; lengths are enumerated (around every block, padding and "
           "buffer boundary; beyond 2^32 by loop acceleration where stated). Residual equalities that the normal form does not decide are settled by random interpretation "
           "of the two value graphs.")
NA = {
 "C32": "depends on elliptic-curve arithmetic inside libsecp256k1, which is outside the repository and enters the analysis as uninterpreted functions; what the library contributes is decided by C24 and C25",
}

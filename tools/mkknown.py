#!/usr/bin/env python3
"""Writes known_findings.json."""
import json
import os
F = []


def known(prop, what, labels):
    F.append(dict(property=prop, status='known', what=what, labels=labels))


def fixed(prop, commit, what):
    F.append(dict(property=prop, status='fixed', entry=f"fixed: property={prop} {commit} {what}"))


known('C12', "RK32 declares order 3 (its order on linear problems) but its nonlinear order is 2: sum b_i c_i^2 = 1/2 instead of 1/3",
      {"RK32 main [[][]]": "0.1666666666667"})
known('C12', "ARK343ERK declares order 4 (its order on linear problems) but its nonlinear order is 3",
      {"ARK343ERK main [[][][]]": "0.04749490583127", "ARK343ERK main [[][[]]]": "0.0730897173991",
       "ARK343ERK main [[[][]]]": "0.03811548361005"})
known('C12', "the embedded weights of ARK548L2SAESDIRK are declared order 5 (as observed on the Dahlquist problem) but are of nonlinear order 4",
      {"ARK548L2SAESDIRK embedded [[][][][]]": "0.0001328113503039", "ARK548L2SAESDIRK embedded [[][][[]]]": "6.640567515193e-05",
       "ARK548L2SAESDIRK embedded [[][[][]]]": "4.427045010132e-05", "ARK548L2SAESDIRK embedded [[][[[]]]]": "2.213522505064e-05",
       "ARK548L2SAESDIRK embedded [[[]][[]]]": "3.320283757596e-05", "ARK548L2SAESDIRK embedded [[[][][]]]": "-1.060411667919e-07",
       "ARK548L2SAESDIRK embedded [[[][[]]]]": "-5.302058340984e-08", "ARK548L2SAESDIRK embedded [[[[][]]]]": "-3.534705561234e-08",
       "ARK548L2SAESDIRK embedded [[[[[]]]]]": "-1.767352781311e-08"})

fixed('C10', 'b826e6b', "RK53: A[2,1] was 3/13 instead of 3/16, so that the row did not sum to its node")
fixed('C12', 'b826e6b', "RK53: order conditions of its declared order 3")
fixed('C13', 'a86c03c', "padding did not pad the embedded weights, so that weightsEmbedded and genCoeffs(embedded=True) had the wrong size")
fixed('C18', 'bca755f', "BEPAR and TRAPAR ignored tLeft: steps start at tLeft")
fixed('C18', '3a1bee6', "SOE ignored tLeft in the leap-frog recurrence")
fixed('C18', 'c8cea1c', "integer nodes truncated the distance of the first node to a fractional left bound")
fixed('C25', 'd72e40e', "time-stepping QDelta built from qGen ignored the tLeft of the collocation method")
fixed('C08', 'd4675be', "hCoeffs and rightIsNode of a collocation method used 1 instead of tRight")
fixed('C08', '1925faf', "nodes within np.allclose of a bound were overwritten by the bound, whatever the quadrature type (even GAUSS)")
fixed('C24', '65bbf8d', "genQDeltaCoeffs extended the list of types of its caller")
fixed('C30', '8938bda', "QDeltaGenerator.genCoeffs returned its cached matrix")
fixed('C30', '062480d', "QGenerator.genCoeffs returned its internal storage (for RK: the table of the class)")
fixed('C29', '999cb57', "getSparseInterpolationMatrix with a period used wrong stencils when the grid starts outside of [-P/2, P/2] (e.g. [1, 2) with period 1)")
fixed('C28', '63d71c2', "getExtrapolationMatrix overflowed int64 for integer nodes or times (e.g. nodes [0, 1000, 2000, 3000])")
fixed('C29', 'ca6c064', "getSparseInterpolationMatrix reused the previous row for different but close stencils")
fixed('C05', 'd639e88', "AUTO weights: overflow and underflow of the product was not detected, weights were inf, nan or 0")
fixed('C05', 'cf4af99', "AUTO weights: the STABLE fallback ran inside the error state of the FAST algorithm and raised FloatingPointError when a weight underflowed (e.g. 1100 equidistant points)")
fixed('C19', '91d3ac3', "LU: pivoting permuted the factor, so that QDelta was not the transposed upper factor of Q^T = LU")
fixed('C20', '91d3ac3', "LU: the stiff-limit iteration matrix was not nilpotent when pivoting permuted rows")
fixed('C32', 'a31d5d9', "EDIRK43 (nodes not increasing): barycentric weights were those of the sorted nodes, so that hCoeffs did not evaluate the interpolant at 1")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=F), f, indent=1)

"""Effectivity of the current position within one revolution."""


def effectivity(rate, rates):
    big = rates[0]
    small = rates[0]
    for r in rates[1:]:
        if abs(r) > abs(big):
            big = r
        if abs(r) < abs(small):
            small = r
    return abs(rate/big), abs((rate - small)/(big - small))

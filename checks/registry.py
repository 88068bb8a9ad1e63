"""property id -> module that decides it"""
import decode
import derived
import determinism
import effects
import errors
import loss
import malformed
import front
import bounds
import wirec

CHECKS = {
    "C01": decode.C01,
    "C02": decode.C02,
    "C03": wirec.C03,
    "C04": wirec.C04,
    "C05": wirec.C05,
    "C06": wirec.C06,
    "C07": derived.C07,
    "C08": derived.C08,
    "C09": derived.C09,
    "C10": derived.C10,
    "C11": malformed.C11,
    "C12": determinism.C12,
    "C13": front.C13,
    "C14": front.C14,
    "C15": effects.C15,
    "C16": loss.C16,
    "C17": errors.C17,
    "C19": bounds.C19,
    "C20": bounds.C20,
    "C25": errors.C25,
}

NOT_APPLICABLE = {
    "C18": "the oracle is the set of names resolution looks up, by string and at run time, part of it inside unparsed token text; no static enumeration of it is sound",
    "C21": "legality of a name is a fact about run-time strings that pass through an external case converter",
    "C22": "the values the attributes carry are run-time data of resolved types; the refusal of keys the derive does not know is checked in C11",
    "C23": "which token was examined depends on backtracking and on predicates over run-time text; the decidable part (never past the end, always progress) is C13 and C14",
    "C24": "the unwraps of the resolver rest on invariants between maps filled in different passes, which no local static argument establishes",
    "N01": "the round trip of every value of every type quantifies over run-time values through two recursive traversals; it is decided piecewise "
           "as layout agreement (C03, C04), mirrored derived code (C09, C10) and error propagation (C07, C08), and the composition is not a static fact "
           "this family reaches",
    "N02": "there is no other implementation or machine-readable X.691 here to compare with; C03 and C04 compare the field layout with a table "
           "written from the standard, nothing static decides the rest",
    "N03": "needs a bound on stack and heap use against input depth at run time; the recursion is the shape of the types and no static bound exists",
    "N04": "the meaning of an ASN.1 specification is not available as an oracle, and the property quantifies over all specifications",
}

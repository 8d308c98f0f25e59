#!/usr/bin/env python3
"""Writes the repaired defects (commits of /repo) into known_findings.json behind the open findings."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F="""P01 6357138 a statement that ends at the end of the input (no semicolon) was rejected or failed in several clauses
P01 447b514 malformed input panicked or ended the process instead of returning an error
P07 8f96198 a quoted word equal to a keyword was treated as that keyword
P10 52c64db the joins before a CROSS JOIN were lost
P12 6ff41fc CREATE MATERIALIZED VIEW lost MATERIALIZED
P03 aaf4b64 CREATE INDEX UNIQUE INDEX was accepted, dropping a word
P12 5624311 comma separated table options were rejected, although the printer writes commas
P02 7f195c0 printed table options ran into the column list; CREATE TABLE without elements printed no parentheses
P13 aaf4070 NUMERIC without precision was rejected
P08 4edee89 integers outside 64 bits were replaced by another value
P13 a2ed112 TIME WITH TIME ZONE lost its time zone
P02 242f4cf CREATE INDEX without columns printed an empty list that does not parse
P12 8c7140a DROP TABLE a, b kept only the first table
P12 e9fd82d of several constraints of a column only the last was kept; a second DEFAULT replaced the first silently
P03 f7ebd35 invalid referenced columns of a foreign key were dropped without an error
P10 df4d014 table function arguments were rejected or lost
P04 542f30e the bounds of BETWEEN swallowed AND and looser operators; an infix NOT without IN, BETWEEN or LIKE behind it was misread
P10 99506c3 HAVING, LIMIT and ON behind a table or item without alias were taken for its alias
P03 7ec16ce SELECT WITH in a subquery lost the SELECT
P01 cc8a17e SetTokens kept the read index of the tokens set before
T01 4049771 an unclosed quoted identifier looped forever
T02 f1be70e stars inside block comments were lost
T03 c7b73b8 lines and columns inside quotes and comments were miscounted
T02 6e617a9 a line comment did not end at CR and CRLF line ends
S01 0a56567 tokens shared their keyword values
T07 3c0a951 read errors were taken for the end of the input
P08 eab6c49 a string holding a quote printed without doubling it
P08 10a37dc a double without fraction printed as an integer
A01 8b67df7 the visitor returned by Visit was not used for the children
A01 f7286e8 Walk missed children and visited absent ones (panic)
A01 2ba49ef Walk visited children out of source order
A02 d278f85 cursors named the Query field wrongly
A02 6e49caf Apply missed children and visited absent ones (panic)
A02 636abe1 Apply visited children out of source order
A05 905d890 many nodes had no or wrong positions
A05 47040bd IS NULL and qualified wildcards ended elsewhere; nodes with unknown first part started nowhere"""
p=here+"/known_findings.json"
k=[e for e in json.load(open(p)) if e.get("status")!="fixed"]
for l in F.splitlines():
    i,c,w=l.split(" ",2)
    k.append({"property":i,"key":"fixed-"+c,"status":"fixed","commit":c,"what":w,"entry":f"fixed: property={i} {c} {w}"})
open(p,"w").write("[\n "+",\n ".join(json.dumps(e,separators=(",",":")) for e in k)+"\n]\n")
print(len(k))

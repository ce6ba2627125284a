# token strings for acorn_diff.js: python3 gen_cases.py NAME DEPTH
import sys, json, itertools
A={
'ops':("x = ",["a","+","-","**","(",")","!","++",",","?",":","=","in"],";"),
'expr':("",["a","(",")","[","]","{","}",",","...","=","=>","async",":"],""),
'stmt':("",["a","if","(",")","{","}",";","else","do","while","function","return",":","\n"],""),
'for':("for(",["var","a","in","of",";","=","[","]",",","(",")","let"],""),
'obj':("x = {",["a","get","async","*","(",")","{","}",",",":","1","[","]","static"],"}"),
'cls':("class A {",["a","get","async","*","(",")","{","}",",","static",";","constructor"],"}"),
'yield':("function *g(){",["yield","a","*",";","(",")","=","function","{","}","await","\n"],"}"),
'await':("async function g(){",["yield","a","await",";","(",")","=>","function","{","}","async","\n"],"}"),
'imp':("",["import","a","{","}",",","*","as","from","'x'","default","export",";"],""),
'exp':("var a;",["export","a","{","}",",","*","as","from","'x'","default","function","class","(",")","async"],""),
'new':("",["new","a","(",")",".","target","[","]","`t`","function","{","}","super"],""),
'sw':("switch(a){",["case","default",":","a","{","}","break",";","\n","continue"],"}"),
'try':("",["try","{","}","catch","finally","(",")","a","throw","\n",";"],""),
'strict':("'use strict';",["eval","=","a","let","static","yield","(",")","=>","++","{","}","function",","],""),
'cls2':("",["class","a","extends","{","}","(",")","new",";","=","static"],""),
'dir':("",["'use strict'",";","\n","eval","=","a","function","(",")","{","}","+"],""),
'tpl':("",["`","${","}","{","a","/","'","\n","b","\\"],""),
'num':("",["0","1","7","8","x","b","e",".","+","o","a"],""),
'str':("'",["\\","'","x","u","{","}","0","1","8","\n","d","\r"],"'"),
'slash':("",["/","a","[","]","\\","\n","*","=","g","(",")","{","}"],""),
}
n,d=sys.argv[1],int(sys.argv[2]); pre,al,suf=A[n]
sep="" if n in("tpl","num","str","slash") else " "
for k in range(1,d+1):
    for t in itertools.product(al,repeat=k):
        s=pre+(" " if sep else "")+sep.join(t)+sep+suf
        print(json.dumps([s,False]))
        if n in('imp','exp','await') : print(json.dumps([s,True]))

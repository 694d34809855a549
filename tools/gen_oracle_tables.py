#!/usr/bin/env python3
"""One-off generator of harness/oracle_tables.inc (the committed result is the oracle; checks never run this)."""
import re,sys
src=open('/repo/src/tables.cc').read()
rds=open('/repo/src/text/rdsstring.cc').read()
def strs(t): return [bytes(x,'utf8') for x in re.findall(r'"((?:[^"\\]|\\.)*)"',t)]
def body(t,start,end='};'):
    i=t.index(start); i=t.index('{',i+len(start)-1); return t[i:t.index(end,i)]
out=[]
def pad(name,l,n=None):
    l=[x.decode('unicode_escape').encode('latin1') if b'\\' in x else x for x in l]
    if n: l=l+[b'']*(n-len(l))
    w=max(map(len,l))+1
    out.append(f'static const u8 {name}_len[{len(l)}]={{'+','.join(str(len(x)) for x in l)+'};')
    out.append(f'static const u8 {name}_dat[{len(l)}][{w}]={{'+',\n'.join('{'+','.join(str(b) for b in x.ljust(w,b"\0"))+'}' for x in l)+'};')
pad('kPty',strs(body(src,'pty_names{')),32)
pad('kPtyRbds',strs(body(src,'pty_names_rbds{')),32)
pad('kLang',strs(body(src,'languages{')),128)
pad('kCont',strs(body(src,'content_type_names{')),64)
b=body(src,'oda_apps{',' };')
apps=re.findall(r'\{(0x[0-9A-F]+), "([^"]*)"\}',b)
out.append(f'static const u16 kApp_id[{len(apps)}]={{'+','.join(a for a,_ in apps)+'};')
pad('kApp',[n.encode() for _,n in apps])
cc=re.findall(r'\{(0x[0-9A-F]+),\s*\{([^}]*)\}\}',body(src,'country_codes{','\n  };'))
out.append(f'static const u8 kEcc[{len(cc)}]={{'+','.join(a for a,_ in cc)+'};')
out.append(f'static const char kCountry[{len(cc)}][15][3]={{'+',\n'.join('{'+l+'}' for _,l in cc)+'};')
three=re.findall(r'\{(0x[0-9A-F]+), "([^"]*)"\}',body(src,'three_letter_codes{',' };'))
out.append(f'static const u16 kThree_pi[{len(three)}]={{'+','.join(a for a,_ in three)+'};')
out.append(f'static const char kThree[{len(three)}][4]={{'+','.join('"'+n+'"' for _,n in three)+'};')
ln=re.findall(r'\{(0x[0-9A-F]+), "([^"]*)"\}',body(src,'linked_station_codes{',' };'))
out.append(f'static const u16 kLinked_pi[{len(ln)}]={{'+','.join(a for a,_ in ln)+'};')
pad('kLinked',[n.encode() for _,n in ln])
g=body(rds,'codetable_G0({','})')
cps=[]
for s in re.findall(r'"((?:[^"\\]|\\.)*)"',g):
    s={'\\n':'\n','\\r':'\r','\\"':'"','\\\\':'\\','\\u00AD':'\u00ad'}.get(s,s)
    assert len(s)==1,s
    cps.append(ord(s))
assert len(cps)==256
out.append('const u16 kG0[256]={'+','.join(hex(c) for c in cps)+'};')
open('/verif/harness/oracle_tables.inc','w').write('// Reference tables, transcribed once and reviewed; independent of the code under check.\n'+'\n'.join(out)+'\n')

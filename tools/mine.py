#!/usr/bin/env python3
"""One-off: mines, per language, a token dictionary and seed programs from the repository
(fixtures, tests, readmes and lexer literals at the pinned commit) into harness/langs/corpus/.
The committed output is what the checks use; this script is not run by any check."""
import os,re,json,subprocess,sys
root='/repo/examples'
reg=open('/verif/harness/langs/src/registry.rs').read()
names=re.findall(r'\$m!\("([^"]+)"',reg)
files=subprocess.check_output(['git','-C','/repo','ls-files','examples'],text=True).split()
by={}
for f in files:
    by.setdefault(f.split('/')[1],[]).append('/repo/'+f)
def unesc(s):
    try:
        return json.loads('"'+re.sub(r"\\'", "'", s.replace('\n','\\n').replace('\t','\\t').replace('\r','\\r')).replace('\\0','\\u0000')+'"')
    except Exception: return None
tot=0
for n in names:
    d={};seeds=[]
    for f in by.get(n,[]):
        try: t=open(f,encoding='utf8').read()
        except Exception: continue
        if f.endswith('.rs'):
            if '/src/lexer' in f or '/src/parser' in f or 'token_type' in f or '/src/language' in f or '/src/builder' in f:
                t2=re.sub(r'//[^\n]*','',t)
                for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"',t2):
                    s=unesc(m.group(1))
                    if s and 0<len(s)<=24 and not s.startswith('../') and 'readme' not in s and not (len(s)>10 and ' ' in s and s[0].isalpha()): d[s]=d.get(s,0)+1
                for m in re.finditer(r"b?'((?:[^'\\\n]|\\.))'",t2):
                    s=unesc(m.group(1))
                    if s: d[s]=d.get(s,0)+1
            # seeds: string literals used as source in tests / docs
            if '/tests/' in f or '/src/' in f:
                for m in re.finditer(r'r(#*)"(.*?)"\1',t,re.S):
                    s=m.group(2)
                    if 8<=len(s)<=1500 and '#[doc' not in s: seeds.append(s)
                for m in re.finditer(r'(?:SourceText::(?:new|from)|let (?:source|code|text|src|input)[^=\n]*=)\(?\s*"((?:[^"\\]|\\.)*)"',t):
                    s=unesc(m.group(1))
                    if s and len(s)>=3: seeds.append(s)
        elif f.endswith('.md'):
            for m in re.finditer(r'```(\w*)[^\n]*\n(.*?)```',t,re.S):
                if m.group(1) not in('rust','toml','mermaid','text','') or n in('oak-rust','oak-toml'):
                    seeds.append(m.group(2)[:1500])
        elif f.endswith('.json') and '/tests/' in f and not f.endswith(('.lexed.json','.parsed.json','.built.json')) and n=='oak-json':
            seeds.append(t[:1500])
        elif '/tests/' in f and not f.endswith(('.toml','.json')) :
            seeds.append(t[:2500])
    # de-dup
    out=[];seen=set()
    for s in seeds:
        if s in seen: continue
        seen.add(s); out.append(s)
    out=sorted(out,key=len)
    # keep a spread up to 14 seeds
    if len(out)>14:
        step=len(out)/14; out=[out[int(i*step)] for i in range(14)]
    json.dump({'dict':sorted(d),'seeds':out},open('/verif/harness/langs/corpus/%s.json'%n,'w'),ensure_ascii=False,indent=0)
    tot+=sum(len(s) for s in out)
    print(n,len(d),len(out),sum(len(s) for s in out))
print(tot)

import re,sys
# normalise harness text: PROP_T/PROP names to identifiers, CHECK_THROWS argument order
for f in sys.argv[1:]:
    s=open(f).read()
    def nm(m): return m.group(1)+re.sub(r'_+$','',re.sub(r'\W+','_',m.group(2)))+","
    s=re.sub(r'(PROP_T\(\s*)"([^"]*)",',nm,s)
    s=re.sub(r'PROP\( "([^"]*)", ([^{]*?), \{',lambda m:'PROP_T( '+re.sub(r'_+$','',re.sub(r'\W+','_',m.group(1)))+', '+m.group(2)+', {',s)
    s=re.sub(r'CHECK_THROWS\( (?!std::)(.*), (std::\w+) \);',r'CHECK_THROWS( \2, \1 );',s)
    open(f,'w').write(s)

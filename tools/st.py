# helper: st.py ID  < new statement on stdin (optionally 'TITLE: ...' first line)
import re,sys
f='/verif/tools/properties.py'; s=open(f).read(); id=sys.argv[1]; t=sys.stdin.read().strip()
title=None
if t.startswith('TITLE:'): title,t=t.split('\n',1); title=title[6:].strip(); t=t.strip()
t=' '.join(t.split())
m=re.search(r'p\("%s", "([^"]*)",\n  "((?:[^"\\]|\\.)*)"'%id, s); assert m, id
s=s[:m.start()]+'p("%s", "%s",\n  "%s"'%(id,title or m.group(1),t)+s[m.end():]
open(f,'w').write(s)

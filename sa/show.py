import sys
sys.path.insert(0,'/verif/sa')
import facts
def vs(v,P=None):
    if isinstance(v,int): return '%%%d'%v
    if 'c' in v: return str(v['c'])
    if 'n' in v: return 'null'
    if 'fn' in v: return '@'+(P.names.get(v['fn'],{}).get('q',v['fn']) if P else v['fn'])
    return str(v)
def show(P,f):
    print(f['q'],f.get('pt'),f['args'],'coro' if f.get('coro') else '')
    for bi,b in enumerate(f['blocks']):
        print('bb%d:'%bi)
        for i in b:
            d='%%%s = '%i['d'] if 'd' in i else ''
            s=d+i['o']
            if i['o']=='call': s+=' '+vs(i['f'],P)
            if 'p' in i: s+=' '+i['p']
            s+=' ('+', '.join(vs(a,P) for a in i.get('a',[]))+')'
            for k in ('st','t','inv','cs','df','in','ix','ty','nu','nr','ca','cl'):
                if k in i: s+=' %s=%s'%(k,i[k])
            print('   ',s,'  ;%d'%i['l'][1])
if __name__=='__main__':
    P=facts.extract()
    for f in P.byq.get(sys.argv[1],[]): show(P,f)

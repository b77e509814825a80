// Development aid, not a check: compares the TLC-generated transducers plus the frozen
// classification tables with ICU's Intl.Segmenter (node 22 = ICU 78 = Unicode 17), which
// shares no code or data with the repository.  usage: node crosscheck.js KIND TABLE.out DATA.json
const fs=require('fs');const [,,gran,tab,data,seed]=process.argv;
const T=new Map();const ids=new Map();const id=s=>{s=JSON.stringify(s);if(!ids.has(s)){ids.set(s,ids.size);T.set(ids.get(s),{})}return ids.get(s)};
for(const l of fs.readFileSync(tab,'utf8').split('\n')){if(!l.startsWith('"T '))continue;const t=JSON.parse(JSON.parse(l).slice(2));T.get(id(t.s))[t.k]=[id(t.t),t.here,t.pend]}
const K=new Map();const reps={};for(const r of JSON.parse(fs.readFileSync(data)))for(let c=r.lo;c<=r.hi;c++){K.set(c,r.k)}
const kindOf=c=>K.get(c)||'Other';
for(let c=0;c<0x110000;c++){if(c>=0xd800&&c<0xe000)continue;(reps[kindOf(c)]??=[]).push(c)}
function oracle(cps){let st=0,pend=-1,out=[];for(let i=0;i<cps.length;i++){const [n,h,p]=T.get(st)[kindOf(cps[i])];if(p!='-'){out[pend]=p=='B';pend=-1}if(h=='P'){pend=i;out[i]=true}else out[i]=h!='J';st=n}return out}
const seg=new Intl.Segmenter('en',{granularity:gran});
function icu(cps){const s=String.fromCodePoint(...cps);const b=new Set();for(const x of seg.segment(s))b.add(x.index);let o=0;return cps.map(c=>{const r=b.has(o);o+=c>0xffff?2:1;return r})}
const kinds=Object.keys(reps);const one=kinds.map(k=>reps[k].filter(c=>gran!='word'||k=='Katakana'||!/[\p{scx=Han}\p{scx=Hang}\p{scx=Hira}\p{scx=Kana}]/u.test(String.fromCodePoint(c)))[3]??reps[k][0]);
const ctx=[];for(const a of one){ctx.push([[a],[]],[[],[a]]);for(const b of one){ctx.push([[a],[b]]);ctx.push([[a,b],[]]);ctx.push([[],[a,b]])}}
let bad=new Map(),n=0;
const DICT=/[\p{scx=Han}\p{scx=Hira}\p{scx=Kana}\p{scx=Hang}\p{scx=Thai}\p{scx=Laoo}\p{scx=Khmr}\p{scx=Mymr}\p{scx=Tale}\p{scx=Talu}\p{scx=Lana}\p{scx=Ahom}\p{scx=Tavt}\u3000-\u30ff\uff66-\uffdf]/u;
for(let c=0;c<0x110000;c++){if(c>=0xd800&&c<0xe000)continue;
 if(gran=='word'&&DICT.test(String.fromCodePoint(c)))continue; // ICU segments these scripts with dictionaries
 if(c>0x3000&&c%7&&!K.has(c))continue; // thin out the unassigned planes
 for(const [a,b] of (c<0x300?ctx:ctx.filter((_, i)=>i<2||(i+c)%23==0))){const t=[...a,c,...b];n++;const x=oracle(t),y=icu(t);if(x.join()!=y.join()){const k=t.map(kindOf).join(' ');if(!bad.has(k))bad.set(k,[0,t.map(z=>z.toString(16)).join(' '),x.join(),y.join()]);bad.get(k)[0]++}}}
console.log(gran,'texts',n,'differing kind sequences',bad.size);for(const [k,v] of [...bad].sort((a,b)=>b[1][0]-a[1][0]).slice(0,25))console.log(k,v.join(' | '));

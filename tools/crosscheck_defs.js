const fs=require('fs');const K=new Map();for(const r of JSON.parse(fs.readFileSync('/verif/spec/data/word.json')))for(let c=r.lo;c<=r.hi;c++)K.set(c,r.k);
const I=new Set();for(const r of JSON.parse(fs.readFileSync('/verif/spec/data/ideographic.json')))for(let c=r.lo;c<=r.hi;c++)I.add(c);
const kat=new Set([0x3031,0x3032,0x3033,0x3034,0x3035,0x309b,0x309c,0x30a0,0x30fc,0xff70]);
let m={};let im={};
for(let c=0;c<0x110000;c++){if(c>=0xd800&&c<0xe000)continue;const s=String.fromCodePoint(c);
 const isKat=/\p{Script=Katakana}/u.test(s)||kat.has(c);
 const ide=isKat||/[\p{Script=Han}\p{Script=Hiragana}]/u.test(s);
 if(ide!=I.has(c)){(im[`${ide}`]??=[]).push(c.toString(16))}
 const k=K.get(c)||'Other';
 if(isKat!=(k=='Katakana'))(m['kat '+k]??=[]).push(c.toString(16));
 if(/[\p{scx=Han}\p{scx=Hira}\p{scx=Kana}\p{scx=Hang}\p{scx=Thai}\p{scx=Laoo}\p{scx=Khmr}\p{scx=Mymr}\p{scx=Tale}\p{scx=Talu}\p{scx=Lana}\p{scx=Ahom}\p{scx=Tavt}]/u.test(s)){
  const ext=/[\p{Grapheme_Extend}\p{Mc}\p{Emoji_Modifier}]/u.test(s);
  if(ext!=(k=='Extend'))(m['ext '+k]??=[]).push(c.toString(16));
  const sa=/[\p{scx=Thai}\p{scx=Laoo}\p{scx=Khmr}\p{scx=Mymr}\p{scx=Tale}\p{scx=Talu}\p{scx=Lana}\p{scx=Ahom}\p{scx=Tavt}]/u.test(s)&&/[\p{L}\p{M}\p{Sk}]/u.test(s);
  const al=/\p{Alphabetic}/u.test(s)&&!/\p{Ideographic}/u.test(s)&&!isKat&&!/\p{Script=Hiragana}/u.test(s)&&!ext&&!sa;
  if(al!=(k=='ALetter'))(m['al '+k]??=[]).push(c.toString(16));
  const nu=/\p{Nd}/u.test(s)&&!(c>=0xff10&&c<=0xff19&&false);
  if(nu!=(k=='Numeric'))(m['num '+k]??=[]).push(c.toString(16));
 }}
for(const k in m)console.log(k,m[k].length,m[k].slice(0,20).join(' '));for(const k in im)console.log('ideo want',k,im[k].length,im[k].slice(0,30).join(' '));

// development-time: prints JDN relatedYear month(bis) day for the first day of each ICU Chinese month
const f = new Intl.DateTimeFormat('en-u-ca-chinese', {timeZone:'UTC', year:'numeric', month:'numeric', day:'numeric'});
const from = +process.argv[2], to = +process.argv[3];
for (let n = from; n <= to; n++) {
  const p = f.formatToParts(new Date((n - 2440588) * 86400000));
  const o = {}; for (const x of p) o[x.type] = x.value;
  if (o.day === '1') console.log(n, o.relatedYear, o.month);
}

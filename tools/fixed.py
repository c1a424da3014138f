"""regenerates the list of repaired defects in known-findings.json from /repo's log (run by hand)"""
import json,subprocess
log=subprocess.run("git -C /repo log --format='%H %s' --reverse",shell=True,capture_output=True,text=True).stdout.splitlines()
m={"46aec97":"C02","5be55b3":"C03","b3ecbd1":"C04","a5f8c94":"C20","8b8f04e":"C06","2145001":"C06","9a087f7":"C09","294b835":"C09","f133e00":"C04","f53df3a":"C05","1c89420":"C05","f7ba42f":"C05","181a934":"C04","49e9655":"C04","9240b98":"C04","942143b":"C04","023f856":"C04","75bf072":"C22","93cf9ab":"C20","ceec0d3":"C20","bfa10a3":"C09","b273835":"C09","aabfb94":"C10","7cc393a":"C10","57de2ba":"C10","c9bf99e":"C10","d499ea5":"C10","b7eff5a":"C11","ec91af1":"C11","acbd26e":"C11","41df707":"C16","c24fdde":"C17","ecb9417":"C17","1303b50":"C17","2be4336":"C15","05d20a2":"C15","a7b0ee6":"C18","efa6225":"C18","7f1a038":"C18","95be2f4":"C18","a04f28e":"C18","08bb4b9":"C14","66aa84b":"C14","0244990":"C21","8061f96":"C19","4054b62":"C18","e0d7af9":"C05","c49c8a4":"C05","ff18e62":"C05"}
import os
k=json.load(open('/verif/known-findings.json'))
fixed=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=m.get(h[:7]) or {"fix: compile even if object code can't be written":"C10","fix: call every function in the same pass":"C12","fix: don't take variables used by an imported function's callees for its parameters":"C09","fix: end an infinite fill before the rows which follow it":"C08","fix: allow fills to go past row 1000":"C08","fix: resolve the dependencies of a module required twice before it":"C10","fix: evaluate a module's definitions independently of their order":"C12","fix: do not export what was merged under the name of another kind of definition":"C09","fix: use Excel's serial numbers for dates in validations":"C14","fix: accept the documented short names of number validations":"C14","fix: load the required module when its name has a `.`":"C09","fix: quote text in the Excel formulas of validations":"C14","fix: use functions which Excel has to validate URLs":"C14","fix: don't panic on what isn't an A1 reference in a range validation":"C04",
 "fix: don't overwrite other files with the temp file of a workbook":"C19","fix: don't overwrite a source file named .csvpo with it's object code":"C21","fix: don't trust object code which is replaced while compiling":"C10","fix: don't overwrite a backup which is made at the same time":"C19",
 "fix: fail if a workbook can't be written completely":"C21","fix: fail with an error rather than panic when writing .ods files":"C21","fix: don't panic when the output's extension isn't valid UTF-8":"C21","fix: don't use object code which isn't newer than the source":"C10","fix: print errors about key/values and verbosity":"C21","fix: accept windows newlines in line continuations and blank first lines":"C22","fix: mark what's wrong in options rather than what's before it":"C20"}[s]
    fixed.append(f"fixed: property={p} {h} {s[5:]}")
k["fixed"]=fixed
json.dump(k,open('/verif/known-findings.json','w'),indent=1); open('/verif/known-findings.json','a').write("\n")
print(len(fixed))

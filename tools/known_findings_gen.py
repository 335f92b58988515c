import json,subprocess
K=[]
def o(p,key,what): K.append(dict(property=p,status="open",key=key,what=what))
for f in ("notmuch_config_list_key","notmuch_config_list_value","notmuch_config_list_move_to_next"):
    o("P04","escape/"+f,"%s reads the database through a term iterator with no handler: a backend exception (for example a database modified under the reader) terminates the C caller; the function has no way to report an error"%f)
W="a backend exception while adding this term is logged but the operation goes on and can report success without it"
for f in ("_merge_threads","_notmuch_database_link_message","_notmuch_database_link_message_to_children","_notmuch_database_link_message_to_parents","notmuch_database_index_file"):
    o("P05","swallow/%s/_notmuch_message_add_term"%f,"%s ignores the result of _notmuch_message_add_term: %s"%(f,W))
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","b209999..HEAD"],text=True).splitlines()
M=[("failing upgrade","P16"),("iterating over properties","P38"),("cached tags","P08"),("freed thread","P18"),("thaw the message","P07"),("talloc report","P17"),("stream of a message","P17"),("configuration file object in load","P17"),("directory twice","P18"),("message properties","P04"),("thaw and remove_all_tags","P04"),("tags_to_maildir_flags","P04"),("read-only database","P03"),("remove_message","P04"),("s-expression","P04"),("CLOSED_DATABASE","P05"),("setup:","P18"),("uninitialized query","P18"),("counting threads","P05"),("insert: process","P22"),("read error in mbox","P26"),("configuration is missing","P26"),("incomplete config","P38"),("failing upgrade","P16"),("empty message/rfc822","P38"),("without HOME","P38"),("iterating over properties","P38"),("collecting tags","P38"),("put the database back","P15"),("failure to commit","P26"),("scan state","P17"),("infix","P05"),("reindexing","P05"),("atomic section cannot","P26"),("tag a new message","P26"),("stored configuration","P04"),("message_reindex","P04"),("threads_get","P04"),("upgrade","P05")]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    p=next((p for k,p in M if k in s),"P05")
    K.append(dict(property=p,status="fixed",commit=h,what=s[5:],record="fixed: property=%s %s %s"%(p,h,s[5:])))
json.dump(K,open("/verif/known_findings.json","w"),indent=1)
for k in K: print(k.get("record") or k["key"])

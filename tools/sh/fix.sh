# fix.sh PROP "commit msg" "what"
cd /repo && git commit -qam "fix: $2" && cd /verif && python3 tools/addfix.py "$1" "$3"

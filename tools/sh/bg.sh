cd /verif; for i in C13 C12; do timeout 3000 ./run.py $i --tier thorough --seed 21; done

ids=$(ls /verif/seeded); bash /tmp/catch.sh /verif/seeded $ids

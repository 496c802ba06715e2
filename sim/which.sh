# which.sh PROPERTY: how the simulator that decides it is built
case $1 in
C06 | C07 | C08 | C09 | C16 | C17 | C21) echo mem ;;
*) echo plain ;;
esac

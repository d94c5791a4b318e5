#!/bin/bash
# mkdemo.sh DIR FILE : instantiate template
sed "s#@FILE@#$2#" /verif/tools/demo_template.sh > $1/demo.sh; chmod +x $1/demo.sh

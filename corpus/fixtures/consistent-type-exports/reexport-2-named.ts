import { A } from './reexport-1';
const A = 1;
export { A };
